SPECIFICATION Spec
CONSTANTS
  Objs <- O3
  Params <- FewParams
  Vals <- AllVals
  Datas <- D2
  Ops <- AllKinds
  Start <- None
  Len0 = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
