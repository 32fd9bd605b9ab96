SPECIFICATION Spec
CONSTANTS
 Args = {"X", "y", "w"}
 Fits = {"X", "y", "w"}
 Written = {"w"}
 Copied = {"w"}
 Calls = 4
INVARIANT Kept
CHECK_DEADLOCK FALSE
