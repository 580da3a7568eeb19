SPECIFICATION Spec
CONSTANTS IW = 3
 IH = 2
INVARIANTS Consistent Progress
CHECK_DEADLOCK FALSE
