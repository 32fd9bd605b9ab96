SPECIFICATION Spec
CONSTANTS
  Callers <- C2
  Trees <- T3
  ColOf <- Own
  Mode = "slot"
  Locked = TRUE
INVARIANTS EachOnce NeverTwice
VIEW NoHist
