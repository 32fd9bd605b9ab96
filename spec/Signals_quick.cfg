SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2}
  Sizes = {1, 2}
  Noises = {0, 3}
  Names = {"heavisine", "bumps", "blocks", "doppler"}
  Calls = 2
  Grid = 200
INVARIANTS Determined Independent
CHECK_DEADLOCK FALSE
