SPECIFICATION Spec
CONSTANTS
  Objs <- O1
  Params <- FewParams
  Vals <- AllVals
  Datas <- D2
  Ops <- StepOps
  Start <- O1
  Len0 = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
