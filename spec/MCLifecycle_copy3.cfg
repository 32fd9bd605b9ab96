SPECIFICATION Spec
CONSTANTS
  Objs <- O2
  Params <- TwoParams
  Vals <- AllVals
  Datas <- D1
  Ops <- CopyOps
  Start <- O1
  Len0 = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
