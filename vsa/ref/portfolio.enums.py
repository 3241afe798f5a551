"""Reviewed reference definitions of vectorbt.portfolio.enums (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt.utils.docs import to_doc
from vectorbt.portfolio.enums import RejectedOrderError, InitCashModeT, InitCashMode, CallSeqTypeT, CallSeqType, AccumulationModeT, AccumulationMode, ConflictModeT, ConflictMode, DirectionConflictModeT, DirectionConflictMode, OppositeEntryModeT, OppositeEntryMode, StopEntryPriceT, StopEntryPrice, StopExitPriceT, StopExitPrice, StopExitModeT, StopExitMode, StopUpdateModeT, StopUpdateMode, SizeTypeT, SizeType, DirectionT, Direction, OrderStatusT, OrderStatus, OrderSideT, OrderSide, OrderStatusInfoT, OrderStatusInfo, status_info_desc, TradeDirectionT, TradeDirection, TradeStatusT, TradeStatus, TradesTypeT, TradesType, ProcessOrderState, ExecuteOrderState, SimulationContext, GroupContext, RowContext, SegmentContext, OrderContext, PostOrderContext, FlexOrderContext, Order, NoOrder, OrderResult, AdjustSLContext, AdjustTPContext, SignalContext, order_dt, _trade_fields, trade_dt, _log_fields, log_dt


def Auto__decl__of__InitCashModeT():
    return 0


def AutoAlign__decl__of__InitCashModeT():
    return 1


def InitCashMode__decl():
    return InitCashModeT()


def Default__decl__of__CallSeqTypeT():
    return 0


def Reversed__decl__of__CallSeqTypeT():
    return 1


def Random__decl__of__CallSeqTypeT():
    return 2


def Auto__decl__of__CallSeqTypeT():
    return 3


def CallSeqType__decl():
    return CallSeqTypeT()


def Disabled__decl__of__AccumulationModeT():
    return 0


def Both__decl__of__AccumulationModeT():
    return 1


def AddOnly__decl__of__AccumulationModeT():
    return 2


def RemoveOnly__decl__of__AccumulationModeT():
    return 3


def AccumulationMode__decl():
    return AccumulationModeT()


def Ignore__decl__of__ConflictModeT():
    return 0


def Entry__decl__of__ConflictModeT():
    return 1


def Exit__decl__of__ConflictModeT():
    return 2


def Adjacent__decl__of__ConflictModeT():
    return 3


def Opposite__decl__of__ConflictModeT():
    return 4


def ConflictMode__decl():
    return ConflictModeT()


def Ignore__decl__of__DirectionConflictModeT():
    return 0


def Long__decl__of__DirectionConflictModeT():
    return 1


def Short__decl__of__DirectionConflictModeT():
    return 2


def Adjacent__decl__of__DirectionConflictModeT():
    return 3


def Opposite__decl__of__DirectionConflictModeT():
    return 4


def DirectionConflictMode__decl():
    return DirectionConflictModeT()


def Ignore__decl__of__OppositeEntryModeT():
    return 0


def Close__decl__of__OppositeEntryModeT():
    return 1


def CloseReduce__decl__of__OppositeEntryModeT():
    return 2


def Reverse__decl__of__OppositeEntryModeT():
    return 3


def ReverseReduce__decl__of__OppositeEntryModeT():
    return 4


def OppositeEntryMode__decl():
    return OppositeEntryModeT()


def ValPrice__decl__of__StopEntryPriceT():
    return 0


def Price__decl__of__StopEntryPriceT():
    return 1


def FillPrice__decl__of__StopEntryPriceT():
    return 2


def Close__decl__of__StopEntryPriceT():
    return 3


def StopEntryPrice__decl():
    return StopEntryPriceT()


def StopLimit__decl__of__StopExitPriceT():
    return 0


def StopMarket__decl__of__StopExitPriceT():
    return 1


def Price__decl__of__StopExitPriceT():
    return 2


def Close__decl__of__StopExitPriceT():
    return 3


def StopExitPrice__decl():
    return StopExitPriceT()


def Close__decl__of__StopExitModeT():
    return 0


def CloseReduce__decl__of__StopExitModeT():
    return 1


def Reverse__decl__of__StopExitModeT():
    return 2


def ReverseReduce__decl__of__StopExitModeT():
    return 3


def StopExitMode__decl():
    return StopExitModeT()


def Keep__decl__of__StopUpdateModeT():
    return 0


def Override__decl__of__StopUpdateModeT():
    return 1


def OverrideNaN__decl__of__StopUpdateModeT():
    return 2


def StopUpdateMode__decl():
    return StopUpdateModeT()


def Amount__decl__of__SizeTypeT():
    return 0


def Value__decl__of__SizeTypeT():
    return 1


def Percent__decl__of__SizeTypeT():
    return 2


def TargetAmount__decl__of__SizeTypeT():
    return 3


def TargetValue__decl__of__SizeTypeT():
    return 4


def TargetPercent__decl__of__SizeTypeT():
    return 5


def SizeType__decl():
    return SizeTypeT()


def LongOnly__decl__of__DirectionT():
    return 0


def ShortOnly__decl__of__DirectionT():
    return 1


def Both__decl__of__DirectionT():
    return 2


def Direction__decl():
    return DirectionT()


def Filled__decl__of__OrderStatusT():
    return 0


def Ignored__decl__of__OrderStatusT():
    return 1


def Rejected__decl__of__OrderStatusT():
    return 2


def OrderStatus__decl():
    return OrderStatusT()


def Buy__decl__of__OrderSideT():
    return 0


def Sell__decl__of__OrderSideT():
    return 1


def OrderSide__decl():
    return OrderSideT()


def SizeNaN__decl__of__OrderStatusInfoT():
    return 0


def PriceNaN__decl__of__OrderStatusInfoT():
    return 1


def ValPriceNaN__decl__of__OrderStatusInfoT():
    return 2


def ValueNaN__decl__of__OrderStatusInfoT():
    return 3


def ValueZeroNeg__decl__of__OrderStatusInfoT():
    return 4


def SizeZero__decl__of__OrderStatusInfoT():
    return 5


def NoCashShort__decl__of__OrderStatusInfoT():
    return 6


def NoCashLong__decl__of__OrderStatusInfoT():
    return 7


def NoOpenPosition__decl__of__OrderStatusInfoT():
    return 8


def MaxSizeExceeded__decl__of__OrderStatusInfoT():
    return 9


def RandomEvent__decl__of__OrderStatusInfoT():
    return 10


def CantCoverFees__decl__of__OrderStatusInfoT():
    return 11


def MinSizeNotReached__decl__of__OrderStatusInfoT():
    return 12


def PartialFill__decl__of__OrderStatusInfoT():
    return 13


def OrderStatusInfo__decl():
    return OrderStatusInfoT()


def status_info_desc__decl():
    return ['Size is NaN', 'Price is NaN', 'Asset valuation price is NaN', 'Asset/group value is NaN', 'Asset/group value is zero or negative', 'Size is zero', 'Not enough cash to short', 'Not enough cash to long', 'No open position to reduce/close', 'Size is greater than maximum allowed', 'Random event happened', 'Not enough cash to cover fees', 'Final size is less than minimum allowed', 'Final size is less than requested']


def Long__decl__of__TradeDirectionT():
    return 0


def Short__decl__of__TradeDirectionT():
    return 1


def TradeDirection__decl():
    return TradeDirectionT()


def Open__decl__of__TradeStatusT():
    return 0


def Closed__decl__of__TradeStatusT():
    return 1


def TradeStatus__decl():
    return TradeStatusT()


def EntryTrades__decl__of__TradesTypeT():
    return 0


def ExitTrades__decl__of__TradesTypeT():
    return 1


def Positions__decl__of__TradesTypeT():
    return 2


def TradesType__decl():
    return TradesTypeT()


def size__decl__of__Order():
    return np.inf


def price__decl__of__Order():
    return np.inf


def size_type__decl__of__Order():
    return SizeType.Amount


def direction__decl__of__Order():
    return Direction.Both


def fees__decl__of__Order():
    return 0.0


def fixed_fees__decl__of__Order():
    return 0.0


def slippage__decl__of__Order():
    return 0.0


def min_size__decl__of__Order():
    return 0.0


def max_size__decl__of__Order():
    return np.inf


def size_granularity__decl__of__Order():
    return np.nan


def reject_prob__decl__of__Order():
    return 0.0


def lock_cash__decl__of__Order():
    return False


def allow_partial__decl__of__Order():
    return True


def raise_reject__decl__of__Order():
    return False


def log__decl__of__Order():
    return False


def NoOrder__decl():
    return Order(size=np.nan, price=np.nan, size_type=-1, direction=-1, fees=np.nan, fixed_fees=np.nan, slippage=np.nan, min_size=np.nan, max_size=np.nan, size_granularity=np.nan, reject_prob=np.nan, lock_cash=False, allow_partial=False, raise_reject=False, log=False)


def order_dt__decl():
    return np.dtype([('id', np.int64), ('col', np.int64), ('idx', np.int64), ('size', np.float64), ('price', np.float64), ('fees', np.float64), ('side', np.int64)], align=True)


def _trade_fields__decl():
    return [('id', np.int64), ('col', np.int64), ('size', np.float64), ('entry_idx', np.int64), ('entry_price', np.float64), ('entry_fees', np.float64), ('exit_idx', np.int64), ('exit_price', np.float64), ('exit_fees', np.float64), ('pnl', np.float64), ('return', np.float64), ('direction', np.int64), ('status', np.int64), ('parent_id', np.int64)]


def trade_dt__decl():
    return np.dtype(_trade_fields, align=True)


def _log_fields__decl():
    return [('id', np.int64), ('group', np.int64), ('col', np.int64), ('idx', np.int64), ('cash', np.float64), ('position', np.float64), ('debt', np.float64), ('free_cash', np.float64), ('val_price', np.float64), ('value', np.float64), ('req_size', np.float64), ('req_price', np.float64), ('req_size_type', np.int64), ('req_direction', np.int64), ('req_fees', np.float64), ('req_fixed_fees', np.float64), ('req_slippage', np.float64), ('req_min_size', np.float64), ('req_max_size', np.float64), ('req_size_granularity', np.float64), ('req_reject_prob', np.float64), ('req_lock_cash', np.bool_), ('req_allow_partial', np.bool_), ('req_raise_reject', np.bool_), ('req_log', np.bool_), ('new_cash', np.float64), ('new_position', np.float64), ('new_debt', np.float64), ('new_free_cash', np.float64), ('new_val_price', np.float64), ('new_value', np.float64), ('res_size', np.float64), ('res_price', np.float64), ('res_fees', np.float64), ('res_side', np.int64), ('res_status', np.int64), ('res_status_info', np.int64), ('order_id', np.int64)]


def log_dt__decl():
    return np.dtype(_log_fields, align=True)
