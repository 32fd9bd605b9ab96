SPECIFICATION Spec
CONSTANTS
  N = 3
  Classes = {1, 2}
  Estimators = {1, 2}
INVARIANTS Bags OwnWeights CallerKept Shared
