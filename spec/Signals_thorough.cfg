SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2}
  Sizes = {1, 2}
  Noises = {0, 3}
  Names = {"heavisine", "bumps", "blocks", "doppler"}
  Calls = 3
  Grid = 2000
INVARIANTS Determined Independent
CHECK_DEADLOCK FALSE
