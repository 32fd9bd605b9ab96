SPECIFICATION Spec
CONSTANTS
  W = 6
  Maxs = {0, 1, 3, 4}
  Rows = {1, 2, 3}
INVARIANTS ReadBack NoOverflow Fits
CHECK_DEADLOCK FALSE
