SPECIFICATION Spec
CONSTANTS
 MaxNodes = 5
 F = 2
 Bins = {0, 1, 2}
 Steps = {0, 1}
 Dirs = {0, 1}
INVARIANTS Sound Counted Routed Counts Deepest Current
PROPERTY Kept
CHECK_DEADLOCK FALSE
