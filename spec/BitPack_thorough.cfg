SPECIFICATION Spec
CONSTANTS
  W = 7
  Maxs = {0, 1, 2, 3, 4, 7, 8}
  Rows = {1, 2, 3}
INVARIANTS ReadBack NoOverflow Fits
CHECK_DEADLOCK FALSE
