SPECIFICATION Spec
CONSTANTS
  Rows = 4
  Values <- V3
  States <- S2
  Share = 2
INVARIANTS NoLeak Whole
