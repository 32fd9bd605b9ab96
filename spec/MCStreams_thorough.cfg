SPECIFICATION Spec
CONSTANTS
  Forests <- F3
  SeedOf <- Seeds
  NTrees = 2
  NThreads = 3
  NDraws = 3
  Reseed = TRUE
INVARIANTS Determined SameForests
