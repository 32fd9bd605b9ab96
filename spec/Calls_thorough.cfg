SPECIFICATION Spec
CONSTANTS
 Args = {"X", "y", "w"}
 Fits = {"X", "y", "w"}
 Written = {"w", "y"}
 Copied = {"w", "y", "X"}
 Calls = 8
INVARIANT Kept
CHECK_DEADLOCK FALSE
