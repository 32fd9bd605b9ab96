SPECIFICATION Spec
CONSTANTS
  Callers <- C2
  Trees <- T4
  ColOf <- Own
  Mode = "sum"
  Locked = TRUE
INVARIANTS EachOnce NeverTwice
VIEW NoHist
