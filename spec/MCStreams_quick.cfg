SPECIFICATION Spec
CONSTANTS
  Forests <- F3
  SeedOf <- Seeds
  NTrees = 2
  NThreads = 2
  NDraws = 2
  Reseed = TRUE
INVARIANTS Determined SameForests
