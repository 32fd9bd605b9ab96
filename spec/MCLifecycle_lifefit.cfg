SPECIFICATION Spec
CONSTANTS
  Objs <- O1
  Params <- AllParams
  Vals <- AllVals
  Datas <- D2
  Ops <- LifeOps
  Start <- O1
  Len0 = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE
