SPECIFICATION Spec
CONSTANTS
  Callers <- C2
  Trees <- T3
  ColOf <- Own
  Mode = "sum"
  Locked = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
