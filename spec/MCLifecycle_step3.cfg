SPECIFICATION Spec
CONSTANTS
  Objs <- O1
  Params <- TwoParams
  Vals <- AllVals
  Datas <- D1
  Ops <- StepOps
  Start <- O1
  Len0 = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
