SPECIFICATION Spec
CONSTANTS
  V = 5
  N = {0, 1, 2, 3, 5, 6}
  MB = 3
  Cats = {"a", "b", "c"}
  Batches = 2
INVARIANTS NumRight CatRight BackRight NeverUnknown Separates Balanced
CHECK_DEADLOCK FALSE
