SPECIFICATION Spec
CONSTANTS
  Callers <- C1
  Trees <- T2
  ColOf <- Own
  Mode = "sum"
  Locked = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
