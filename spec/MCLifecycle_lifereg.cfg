SPECIFICATION Spec
CONSTANTS
  Objs <- O2
  Params <- RegParams
  Vals <- AllVals
  Datas <- D2
  Ops <- LifeOps
  Start <- None
  Len0 = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
