SPECIFICATION Spec
CONSTANTS
  Objs <- O2
  Params <- FewParams
  Vals <- AllVals
  Datas <- D2
  Ops <- AllKinds
  Start <- None
  Len0 = 6
INVARIANTS Coherent
PROPERTIES Stable Apart
VIEW NoHist
