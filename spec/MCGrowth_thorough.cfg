SPECIFICATION Spec
CONSTANTS
  NumCols <- TNum
  CatCols <- TCat
  Labels <- TLab
  Params <- TPar
INVARIANTS Partition Limits Total ChoiceForm NoLoss CTW Simplex
