SPECIFICATION Spec
CONSTANTS
  Callers <- C2
  Trees <- T3
  ColOf <- Own
  Mode = "col"
  Locked = TRUE
INVARIANTS EachOnce NeverTwice
VIEW NoHist
