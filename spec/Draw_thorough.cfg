SPECIFICATION Spec
CONSTANTS P = 8 K = 6
INVARIANTS Distinct Pool Winners
POSTCONDITION AllReached
CHECK_DEADLOCK FALSE
