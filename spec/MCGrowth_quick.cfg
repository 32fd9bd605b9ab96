SPECIFICATION Spec
CONSTANTS
  NumCols <- QNum
  CatCols <- QCat
  Labels <- QLab
  Params <- QPar
INVARIANTS Partition Limits Total ChoiceForm NoLoss CTW Simplex
