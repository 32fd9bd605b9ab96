SPECIFICATION Spec
CONSTANTS
  Rows = 3
  Values <- V2
  States <- S2
  Share = 1
INVARIANTS NoLeak Whole
