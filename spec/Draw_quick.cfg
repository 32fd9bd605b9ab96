SPECIFICATION Spec
CONSTANTS P = 6 K = 4
INVARIANTS Distinct Pool Winners
POSTCONDITION AllReached
CHECK_DEADLOCK FALSE
