SPECIFICATION Spec
CONSTANTS
  Callers <- C2
  Trees <- T3
  ColOf <- Own
  Mode = "sum"
  Locked = TRUE
INVARIANTS EachOnce NeverTwice
VIEW NoHist
