SPECIFICATION Spec
CONSTANTS
  V = 7
  N = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  MB = 4
  Cats = {"a", "b", "c"}
  Batches = 3
INVARIANTS NumRight CatRight BackRight NeverUnknown Separates Balanced
CHECK_DEADLOCK FALSE
